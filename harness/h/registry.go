// Code generated by tools/gen_registry.py. DO NOT EDIT.

package h

var Jobs = map[string]func(){
	"C01_AccessRank1":                   C01_AccessRank1,
	"C01_AccessRank2":                   C01_AccessRank2,
	"C01_AccessRank3":                   C01_AccessRank3,
	"C01_AccessRank4":                   C01_AccessRank4,
	"C01_Arity":                         C01_Arity,
	"C01_Equals":                        C01_Equals,
	"C01_Huge":                          C01_Huge,
	"C01_Large":                         C01_Large,
	"C01_Position2":                     C01_Position2,
	"C01_Position3":                     C01_Position3,
	"C01_Reverse1":                      C01_Reverse1,
	"C01_Reverse2":                      C01_Reverse2,
	"C01_Reverse3":                      C01_Reverse3,
	"C01_Reverse4":                      C01_Reverse4,
	"C01_Types":                         C01_Types,
	"C02_Big":                           C02_Big,
	"C02_Bind":                          C02_Bind,
	"C02_FillNow":                       C02_FillNow,
	"C02_Large":                         C02_Large,
	"C02_LoadRank1":                     C02_LoadRank1,
	"C02_LoadRank2":                     C02_LoadRank2,
	"C02_LoadRank3":                     C02_LoadRank3,
	"C02_LoadTensor":                    C02_LoadTensor,
	"C02_MakeRank1":                     C02_MakeRank1,
	"C02_MakeRank2":                     C02_MakeRank2,
	"C02_MakeRank3":                     C02_MakeRank3,
	"C02_MakeRank4":                     C02_MakeRank4,
	"C02_Numbers":                       C02_Numbers,
	"C03_Big":                           C03_Big,
	"C03_Float32":                       C03_Float32,
	"C03_Float64":                       C03_Float64,
	"C03_Int":                           C03_Int,
	"C03_Int16":                         C03_Int16,
	"C03_Int32":                         C03_Int32,
	"C03_Int64":                         C03_Int64,
	"C03_Large":                         C03_Large,
	"C03_LargeFloat":                    C03_LargeFloat,
	"C03_Wide":                          C03_Wide,
	"C04_Big":                           C04_Big,
	"C04_DimInt":                        C04_DimInt,
	"C04_DimInt32":                      C04_DimInt32,
	"C04_DimInt64":                      C04_DimInt64,
	"C04_DimMinMaxFloat":                C04_DimMinMaxFloat,
	"C04_DimMinMaxInt":                  C04_DimMinMaxInt,
	"C04_DimSumAvgInt":                  C04_DimSumAvgInt,
	"C04_DimSumAvg_Real":                C04_DimSumAvg_Real,
	"C04_DimWide":                       C04_DimWide,
	"C04_Int":                           C04_Int,
	"C04_Int32":                         C04_Int32,
	"C04_Int64":                         C04_Int64,
	"C04_Large":                         C04_Large,
	"C04_LargeDim":                      C04_LargeDim,
	"C04_LargeDimMinMax":                C04_LargeDimMinMax,
	"C04_LargeMinMax":                   C04_LargeMinMax,
	"C04_MinMaxFloat":                   C04_MinMaxFloat,
	"C04_MinMaxInt":                     C04_MinMaxInt,
	"C04_NaN":                           C04_NaN,
	"C04_SumAvgInt":                     C04_SumAvgInt,
	"C04_SumAvg_Real":                   C04_SumAvg_Real,
	"C04_Wide":                          C04_Wide,
	"C05_Chain":                         C05_Chain,
	"C05_Concat":                        C05_Concat,
	"C05_ConcatWide":                    C05_ConcatWide,
	"C05_Flatten":                       C05_Flatten,
	"C05_LargeConcat":                   C05_LargeConcat,
	"C05_LargeFlatten":                  C05_LargeFlatten,
	"C05_LargeReshape":                  C05_LargeReshape,
	"C05_LargeSub":                      C05_LargeSub,
	"C05_LargeTranspose":                C05_LargeTranspose,
	"C05_Reshape":                       C05_Reshape,
	"C05_ReshapeWide":                   C05_ReshapeWide,
	"C05_SubTensor":                     C05_SubTensor,
	"C05_SubTensorExt":                  C05_SubTensorExt,
	"C05_SubTensorExt2":                 C05_SubTensorExt2,
	"C05_Transpose":                     C05_Transpose,
	"C05_Transpose4":                    C05_Transpose4,
	"C05_Types":                         C05_Types,
	"C06_At":                            C06_At,
	"C06_At2":                           C06_At2,
	"C06_Big":                           C06_Big,
	"C06_Default":                       C06_Default,
	"C06_Default3":                      C06_Default3,
	"C06_Deferred":                      C06_Deferred,
	"C06_DotVector":                     C06_DotVector,
	"C06_Float_Real":                    C06_Float_Real,
	"C06_Int":                           C06_Int,
	"C06_Int32":                         C06_Int32,
	"C06_Int64":                         C06_Int64,
	"C06_Int64Vectors":                  C06_Int64Vectors,
	"C06_Large":                         C06_Large,
	"C06_NaN":                           C06_NaN,
	"C06_Vectors":                       C06_Vectors,
	"C06_VectorsAt":                     C06_VectorsAt,
	"C06_Wide":                          C06_Wide,
	"C07_Concat":                        C07_Concat,
	"C07_Dims":                          C07_Dims,
	"C07_Dot":                           C07_Dot,
	"C07_Large":                         C07_Large,
	"C07_Nested":                        C07_Nested,
	"C07_Shapes":                        C07_Shapes,
	"C07_Shapes3":                       C07_Shapes3,
	"C07_SubTensor":                     C07_SubTensor,
	"C07_Transfer":                      C07_Transfer,
	"C08_Again":                         C08_Again,
	"C08_AgainLarge":                    C08_AgainLarge,
	"C08_Composed":                      C08_Composed,
	"C08_Depth1":                        C08_Depth1,
	"C08_Depth2":                        C08_Depth2,
	"C08_Depth3":                        C08_Depth3,
	"C08_Float32_Real":                  C08_Float32_Real,
	"C08_Float_Real":                    C08_Float_Real,
	"C08_Int":                           C08_Int,
	"C08_Int32":                         C08_Int32,
	"C08_Int64":                         C08_Int64,
	"C08_LongPast":                      C08_LongPast,
	"C08_Reductions":                    C08_Reductions,
	"C09_Deferred":                      C09_Deferred,
	"C09_Immediate":                     C09_Immediate,
	"C09_Immediate3":                    C09_Immediate3,
	"C09_ImmediateWide":                 C09_ImmediateWide,
	"C09_Large":                         C09_Large,
	"C10_Copy":                          C10_Copy,
	"C10_CopyWide":                      C10_CopyWide,
	"C10_Fill":                          C10_Fill,
	"C10_Float32":                       C10_Float32,
	"C10_Float64":                       C10_Float64,
	"C10_Int":                           C10_Int,
	"C10_Int32":                         C10_Int32,
	"C10_Int64":                         C10_Int64,
	"C10_Large":                         C10_Large,
	"C10_Views":                         C10_Views,
	"C11_Deferred2_Real":                C11_Deferred2_Real,
	"C11_Deferred3_Real":                C11_Deferred3_Real,
	"C11_Immediate22_Real_Thorough":     C11_Immediate22_Real_Thorough,
	"C11_Immediate2_Real":               C11_Immediate2_Real,
	"C11_Immediate3_Real":               C11_Immediate3_Real,
	"C11_Layer22_Real":                  C11_Layer22_Real,
	"C11_Layer3_Real":                   C11_Layer3_Real,
	"C12_ELU32_Real":                    C12_ELU32_Real,
	"C12_ELU_Real":                      C12_ELU_Real,
	"C12_GELU32_Real":                   C12_GELU32_Real,
	"C12_GELU_Real":                     C12_GELU_Real,
	"C12_Linear32_Real":                 C12_Linear32_Real,
	"C12_Linear_Real":                   C12_Linear_Real,
	"C12_ReluExact":                     C12_ReluExact,
	"C12_Relu_Real":                     C12_Relu_Real,
	"C12_SELU_Real":                     C12_SELU_Real,
	"C12_Sigmoid32_Real":                C12_Sigmoid32_Real,
	"C12_Sigmoid_Real":                  C12_Sigmoid_Real,
	"C12_Sin32_Real":                    C12_Sin32_Real,
	"C12_Sin_Real":                      C12_Sin_Real,
	"C12_Swish32_Real":                  C12_Swish32_Real,
	"C12_Swish_Real":                    C12_Swish_Real,
	"C12_TailELU32":                     C12_TailELU32,
	"C12_TailELU64":                     C12_TailELU64,
	"C12_TailGELU32":                    C12_TailGELU32,
	"C12_TailGELU64":                    C12_TailGELU64,
	"C12_TailSELU32":                    C12_TailSELU32,
	"C12_TailSigmoid32":                 C12_TailSigmoid32,
	"C12_TailSigmoid64":                 C12_TailSigmoid64,
	"C12_TailSwish32":                   C12_TailSwish32,
	"C12_TailSwish64":                   C12_TailSwish64,
	"C12_TailTanh32":                    C12_TailTanh32,
	"C12_TailTanh64":                    C12_TailTanh64,
	"C12_Tanh32_Real":                   C12_Tanh32_Real,
	"C12_Tanh_Real":                     C12_Tanh_Real,
	"C13_ELU_Real":                      C13_ELU_Real,
	"C13_GELU32_Real":                   C13_GELU32_Real,
	"C13_GELU_Real":                     C13_GELU_Real,
	"C13_Linear_Real":                   C13_Linear_Real,
	"C13_ReluExact":                     C13_ReluExact,
	"C13_Relu_Real":                     C13_Relu_Real,
	"C13_SELU_Real":                     C13_SELU_Real,
	"C13_Sigmoid32_Real":                C13_Sigmoid32_Real,
	"C13_Sigmoid_Real":                  C13_Sigmoid_Real,
	"C13_Sin_Real":                      C13_Sin_Real,
	"C13_Swish32_Real":                  C13_Swish32_Real,
	"C13_Swish_Real":                    C13_Swish_Real,
	"C13_TailELU32":                     C13_TailELU32,
	"C13_TailELU64":                     C13_TailELU64,
	"C13_TailGELU32":                    C13_TailGELU32,
	"C13_TailGELU64":                    C13_TailGELU64,
	"C13_TailSELU32":                    C13_TailSELU32,
	"C13_TailSigmoid32":                 C13_TailSigmoid32,
	"C13_TailSigmoid64":                 C13_TailSigmoid64,
	"C13_TailSwish32":                   C13_TailSwish32,
	"C13_TailTanh32":                    C13_TailTanh32,
	"C13_TailTanh64":                    C13_TailTanh64,
	"C13_Tanh32_Real":                   C13_Tanh32_Real,
	"C13_Tanh_Real":                     C13_Tanh_Real,
	"C13_Zero_Real":                     C13_Zero_Real,
	"C14_Constants":                     C14_Constants,
	"C14_Monotone":                      C14_Monotone,
	"C14_Read":                          C14_Read,
	"C14_RoundTrip":                     C14_RoundTrip,
	"C14_StoreNew":                      C14_StoreNew,
	"C14_StoreSet":                      C14_StoreSet,
	"C15_CmpDouble":                     C15_CmpDouble,
	"C15_CmpHalf":                       C15_CmpHalf,
	"C15_CmpSingle":                     C15_CmpSingle,
	"C15_Copy":                          C15_Copy,
	"C15_Double":                        C15_Double,
	"C15_Half":                          C15_Half,
	"C15_SelfAlias":                     C15_SelfAlias,
	"C15_SetGet":                        C15_SetGet,
	"C15_Single":                        C15_Single,
	"C16_AfterConv":                     C16_AfterConv,
	"C16_Big":                           C16_Big,
	"C16_Deep":                          C16_Deep,
	"C16_Float32_Real":                  C16_Float32_Real,
	"C16_Int":                           C16_Int,
	"C16_Int32":                         C16_Int32,
	"C16_Int64":                         C16_Int64,
	"C16_Large":                         C16_Large,
	"C16_Library":                       C16_Library,
	"C16_Medium":                        C16_Medium,
	"C16_OneLayer":                      C16_OneLayer,
	"C16_Pushed":                        C16_Pushed,
	"C16_ThreeLayers":                   C16_ThreeLayers,
	"C16_ThreeLayers_Real":              C16_ThreeLayers_Real,
	"C16_TwoLayers":                     C16_TwoLayers,
	"C16_TwoLayers_Real":                C16_TwoLayers_Real,
	"C16_Wide":                          C16_Wide,
	"C17_Conv":                          C17_Conv,
	"C17_ConvInt64":                     C17_ConvInt64,
	"C17_ConvLarge_Thorough":            C17_ConvLarge_Thorough,
	"C17_ConvWide":                      C17_ConvWide,
	"C17_Conv_Real":                     C17_Conv_Real,
	"C17_Deconv":                        C17_Deconv,
	"C17_DeconvInt64":                   C17_DeconvInt64,
	"C17_DeconvLarge_Thorough":          C17_DeconvLarge_Thorough,
	"C17_DeconvWide":                    C17_DeconvWide,
	"C17_Deconv_Real":                   C17_Deconv_Real,
	"C17_LargeConv":                     C17_LargeConv,
	"C17_LargeDeconv":                   C17_LargeDeconv,
	"C17_Refused":                       C17_Refused,
	"C17_Square":                        C17_Square,
	"C17_Stacked":                       C17_Stacked,
	"C18_Again":                         C18_Again,
	"C18_InNetwork":                     C18_InNetwork,
	"C18_LargePool":                     C18_LargePool,
	"C18_LargeUp":                       C18_LargeUp,
	"C18_Pool":                          C18_Pool,
	"C18_PoolBorder":                    C18_PoolBorder,
	"C18_PoolInt32_Thorough":            C18_PoolInt32_Thorough,
	"C18_PoolInt64":                     C18_PoolInt64,
	"C18_PoolInts_Thorough":             C18_PoolInts_Thorough,
	"C18_PoolLarge_Real_Thorough":       C18_PoolLarge_Real_Thorough,
	"C18_PoolWhole_Real":                C18_PoolWhole_Real,
	"C18_Pool_Real":                     C18_Pool_Real,
	"C18_RoundTrip":                     C18_RoundTrip,
	"C18_Up":                            C18_Up,
	"C18_UpFloat":                       C18_UpFloat,
	"C18_UpInt64":                       C18_UpInt64,
	"C18_UpLarge":                       C18_UpLarge,
	"C19_Concat":                        C19_Concat,
	"C19_ConcatConv":                    C19_ConcatConv,
	"C19_ConcatDense":                   C19_ConcatDense,
	"C19_ConcatLarge":                   C19_ConcatLarge,
	"C19_ConcatRefused":                 C19_ConcatRefused,
	"C19_ENorm_Real":                    C19_ENorm_Real,
	"C19_Flatten":                       C19_Flatten,
	"C19_FlattenBehind":                 C19_FlattenBehind,
	"C19_Float32":                       C19_Float32,
	"C19_Float64":                       C19_Float64,
	"C19_Int32":                         C19_Int32,
	"C19_Int64":                         C19_Int64,
	"C19_LargeConcat":                   C19_LargeConcat,
	"C19_LargeFlatten":                  C19_LargeFlatten,
	"C19_LargeSub":                      C19_LargeSub,
	"C19_NormAgain_Real":                C19_NormAgain_Real,
	"C19_Norm_Real":                     C19_Norm_Real,
	"C19_SoftMax_Real":                  C19_SoftMax_Real,
	"C19_SubTensor":                     C19_SubTensor,
	"C19_SubTensorBehind":               C19_SubTensorBehind,
	"C19_SubTensorLarge":                C19_SubTensorLarge,
	"C20_Deep":                          C20_Deep,
	"C20_FlatInput":                     C20_FlatInput,
	"C20_Int":                           C20_Int,
	"C20_Int32":                         C20_Int32,
	"C20_Int64":                         C20_Int64,
	"C20_Large":                         C20_Large,
	"C20_OneLayer":                      C20_OneLayer,
	"C20_OneLayer_Real":                 C20_OneLayer_Real,
	"C20_Relu":                          C20_Relu,
	"C20_Steps":                         C20_Steps,
	"C20_ThreeLayers":                   C20_ThreeLayers,
	"C20_Three_Real":                    C20_Three_Real,
	"C20_TwoLayers":                     C20_TwoLayers,
	"C20_TwoLayers_Real":                C20_TwoLayers_Real,
	"C20_Wide":                          C20_Wide,
	"C21_Concat":                        C21_Concat,
	"C21_ConcatConv":                    C21_ConcatConv,
	"C21_ConcatDeep":                    C21_ConcatDeep,
	"C21_Concat_Real":                   C21_Concat_Real,
	"C21_Conv":                          C21_Conv,
	"C21_ConvInt64":                     C21_ConvInt64,
	"C21_ConvLarge_Thorough":            C21_ConvLarge_Thorough,
	"C21_Conv_Real":                     C21_Conv_Real,
	"C21_Deconv":                        C21_Deconv,
	"C21_DeconvInt64":                   C21_DeconvInt64,
	"C21_DeconvLarge_Thorough":          C21_DeconvLarge_Thorough,
	"C21_Deconv_Real":                   C21_Deconv_Real,
	"C21_LargeBehind":                   C21_LargeBehind,
	"C21_LargeConv":                     C21_LargeConv,
	"C21_LargeDeconv":                   C21_LargeDeconv,
	"C21_Medium":                        C21_Medium,
	"C21_Mixed_Thorough":                C21_Mixed_Thorough,
	"C21_PoolAct":                       C21_PoolAct,
	"C21_PoolConv":                      C21_PoolConv,
	"C21_PoolLast":                      C21_PoolLast,
	"C21_Pool_Real":                     C21_Pool_Real,
	"C21_SharedTrunk":                   C21_SharedTrunk,
	"C21_Structural":                    C21_Structural,
	"C21_StructuralLast":                C21_StructuralLast,
	"C21_Structural_Real_Thorough":      C21_Structural_Real_Thorough,
	"C21_ThroughInt64":                  C21_ThroughInt64,
	"C21_Two":                           C21_Two,
	"C21_TwoLarge_Thorough":             C21_TwoLarge_Thorough,
	"C22_Int64":                         C22_Int64,
	"C22_Life":                          C22_Life,
	"C22_LongPast":                      C22_LongPast,
	"C22_ManySteps":                     C22_ManySteps,
	"C22_Medium":                        C22_Medium,
	"C22_Normalising_Real":              C22_Normalising_Real,
	"C22_Steps_Real":                    C22_Steps_Real,
	"C22_ThreeSteps":                    C22_ThreeSteps,
	"C22_ThreeStepsEach":                C22_ThreeStepsEach,
	"C22_TwoSteps":                      C22_TwoSteps,
	"C22_Wide":                          C22_Wide,
	"C23_History1":                      C23_History1,
	"C23_History2":                      C23_History2,
	"C23_History3":                      C23_History3,
	"C23_History_Real":                  C23_History_Real,
	"C23_Int64":                         C23_Int64,
	"C23_Life":                          C23_Life,
	"C23_Life3":                         C23_Life3,
	"C23_Long":                          C23_Long,
	"C23_LongPast":                      C23_LongPast,
	"C23_Medium":                        C23_Medium,
	"C23_Normalising_Real":              C23_Normalising_Real,
	"C23_Sequence":                      C23_Sequence,
	"C24_Deep":                          C24_Deep,
	"C24_FirstPart":                     C24_FirstPart,
	"C24_Int64":                         C24_Int64,
	"C24_Layers":                        C24_Layers,
	"C24_Layers_Real":                   C24_Layers_Real,
	"C24_Life":                          C24_Life,
	"C24_LongPast":                      C24_LongPast,
	"C24_Medium":                        C24_Medium,
	"C24_Model":                         C24_Model,
	"C24_Normalising":                   C24_Normalising,
	"C24_SecondPart":                    C24_SecondPart,
	"C25_Feedback":                      C25_Feedback,
	"C25_Int64":                         C25_Int64,
	"C25_Life":                          C25_Life,
	"C25_LongPast":                      C25_LongPast,
	"C25_Many":                          C25_Many,
	"C25_Medium":                        C25_Medium,
	"C25_Normalising":                   C25_Normalising,
	"C25_Predict":                       C25_Predict,
	"C25_Predict_Real":                  C25_Predict_Real,
	"C25_TrainKeepsSamples":             C25_TrainKeepsSamples,
	"C26_Again":                         C26_Again,
	"C26_Fresh":                         C26_Fresh,
	"C26_Int64":                         C26_Int64,
	"C26_Life":                          C26_Life,
	"C26_LongPast":                      C26_LongPast,
	"C26_Long_Thorough":                 C26_Long_Thorough,
	"C26_Many":                          C26_Many,
	"C26_Medium":                        C26_Medium,
	"C26_Networks":                      C26_Networks,
	"C26_Refused":                       C26_Refused,
	"C26_ThreeSamples":                  C26_ThreeSamples,
	"C26_Train":                         C26_Train,
	"C26_Train_Real":                    C26_Train_Real,
	"C27_AnyExtent":                     C27_AnyExtent,
	"C27_BigFull":                       C27_BigFull,
	"C27_BigSave":                       C27_BigSave,
	"C27_FailFloat64":                   C27_FailFloat64,
	"C27_FailFullFloat32":               C27_FailFullFloat32,
	"C27_FailFullInt":                   C27_FailFullInt,
	"C27_FailInt":                       C27_FailInt,
	"C27_FailInt16":                     C27_FailInt16,
	"C27_FullFloat32":                   C27_FullFloat32,
	"C27_FullFloat64":                   C27_FullFloat64,
	"C27_FullInt":                       C27_FullInt,
	"C27_FullInt16":                     C27_FullInt16,
	"C27_FullInt32":                     C27_FullInt32,
	"C27_FullInt64":                     C27_FullInt64,
	"C27_LargeFull":                     C27_LargeFull,
	"C27_LargeSave":                     C27_LargeSave,
	"C27_ManyDims":                      C27_ManyDims,
	"C27_SaveFloat32":                   C27_SaveFloat32,
	"C27_SaveFloat64":                   C27_SaveFloat64,
	"C27_SaveInt":                       C27_SaveInt,
	"C27_SaveInt16":                     C27_SaveInt16,
	"C27_SaveInt32":                     C27_SaveInt32,
	"C27_SaveInt64":                     C27_SaveInt64,
	"C28_Failures":                      C28_Failures,
	"C28_FailuresFloat32":               C28_FailuresFloat32,
	"C28_Float32":                       C28_Float32,
	"C28_Float64":                       C28_Float64,
	"C28_Frozen":                        C28_Frozen,
	"C28_History":                       C28_History,
	"C28_Int":                           C28_Int,
	"C28_Int16":                         C28_Int16,
	"C28_Life":                          C28_Life,
	"C28_LongPast":                      C28_LongPast,
	"C28_Medium":                        C28_Medium,
	"C28_MediumFloat32":                 C28_MediumFloat32,
	"C28_NormPast":                      C28_NormPast,
	"C28_Normalising":                   C28_Normalising,
	"C29_Exact":                         C29_Exact,
	"C29_ExactImages":                   C29_ExactImages,
	"C29_ExactInt64":                    C29_ExactInt64,
	"C29_ExactSteps":                    C29_ExactSteps,
	"C29_ExactThree":                    C29_ExactThree,
	"C29_Exact_Real":                    C29_Exact_Real,
	"C29_Four":                          C29_Four,
	"C29_Images":                        C29_Images,
	"C29_Int64":                         C29_Int64,
	"C29_None":                          C29_None,
	"C29_One":                           C29_One,
	"C29_Three":                         C29_Three,
	"C29_Train":                         C29_Train,
	"C29_TrainImages":                   C29_TrainImages,
	"C29_TrainPart":                     C29_TrainPart,
	"C29_Two":                           C29_Two,
	"C29_TwoReal_Real":                  C29_TwoReal_Real,
	"C29_UsedBefore":                    C29_UsedBefore,
	"C30_Between":                       C30_Between,
	"C30_First":                         C30_First,
	"C30_Int64":                         C30_Int64,
	"C30_Life":                          C30_Life,
	"C30_LongPast":                      C30_LongPast,
	"C30_Medium":                        C30_Medium,
	"C30_Misfits":                       C30_Misfits,
	"C30_Shapes":                        C30_Shapes,
	"C30_Shapes4":                       C30_Shapes4,
	"C30_Shapes_Real":                   C30_Shapes_Real,
	"C31_LargeLoad_Real":                C31_LargeLoad_Real,
	"C31_LargeTo_Real":                  C31_LargeTo_Real,
	"C31_Load32_Real":                   C31_Load32_Real,
	"C31_LoadFails":                     C31_LoadFails,
	"C31_LoadIEEE":                      C31_LoadIEEE,
	"C31_Load_Real":                     C31_Load_Real,
	"C31_SaveFails":                     C31_SaveFails,
	"C31_Save_Real":                     C31_Save_Real,
	"C31_To32":                          C31_To32,
	"C31_To64":                          C31_To64,
	"C31_ToFails":                       C31_ToFails,
	"C31_ToInt":                         C31_ToInt,
	"C31_To_Real":                       C31_To_Real,
	"C32_Fails":                         C32_Fails,
	"C32_LoadSimpleLarge_Real_Thorough": C32_LoadSimpleLarge_Real_Thorough,
	"C32_LoadSimple_Real":               C32_LoadSimple_Real,
	"C32_LoadSmoothLarge_Real_Thorough": C32_LoadSmoothLarge_Real_Thorough,
	"C32_LoadSmoothLong_Real":           C32_LoadSmoothLong_Real,
	"C32_LoadSmooth_Real":               C32_LoadSmooth_Real,
	"C32_Simple":                        C32_Simple,
	"C32_SimpleFloat":                   C32_SimpleFloat,
	"C32_SimpleLarge_Thorough":          C32_SimpleLarge_Thorough,
	"C32_SimpleLong":                    C32_SimpleLong,
	"C32_Smooth32_Real":                 C32_Smooth32_Real,
	"C32_SmoothEqual64":                 C32_SmoothEqual64,
	"C32_SmoothLarge_Real_Thorough":     C32_SmoothLarge_Real_Thorough,
	"C32_Smooth_Real":                   C32_Smooth_Real,
	"C33_Equal_Real":                    C33_Equal_Real,
	"C33_Int_Real":                      C33_Int_Real,
	"C33_Large_Real":                    C33_Large_Real,
	"C33_Norm32":                        C33_Norm32,
	"C33_Norm64":                        C33_Norm64,
	"C33_NormReal_Real":                 C33_NormReal_Real,
	"C33_NormScalar":                    C33_NormScalar,
	"C33_Rand32_Real":                   C33_Rand32_Real,
	"C33_RandIEEE":                      C33_RandIEEE,
	"C33_Rand_Real":                     C33_Rand_Real,
	"C33_Scalar32_Real":                 C33_Scalar32_Real,
	"C33_Scalar_Real":                   C33_Scalar_Real,
	"C34_Bar":                           C34_Bar,
	"C34_BarLarge_Thorough":             C34_BarLarge_Thorough,
	"C34_BarMedium":                     C34_BarMedium,
	"C34_BarWide":                       C34_BarWide,
	"C34_BarWider":                      C34_BarWider,
	"C34_Distance32_Real":               C34_Distance32_Real,
	"C34_DistanceInt_Real":              C34_DistanceInt_Real,
	"C34_Distance_Real":                 C34_Distance_Real,
	"C34_Large_Real":                    C34_Large_Real,
	"C34_Lengths":                       C34_Lengths,
	"C34_Zero_Real":                     C34_Zero_Real,
	"C35_Freeze":                        C35_Freeze,
	"C35_FreezeAll":                     C35_FreezeAll,
	"C35_Life":                          C35_Life,
	"C35_LongPast":                      C35_LongPast,
	"C35_Predict":                       C35_Predict,
	"C35_PredictInt64":                  C35_PredictInt64,
	"C35_Predict_Real":                  C35_Predict_Real,
	"C35_Pushed":                        C35_Pushed,
	"C35_Save":                          C35_Save,
	"C35_Train":                         C35_Train,
	"C35_Train_Real":                    C35_Train_Real,
	"C36_Medium":                        C36_Medium,
	"C36_Model":                         C36_Model,
	"C36_Nested":                        C36_Nested,
	"C36_Scalar":                        C36_Scalar,
	"C36_ScalarWide":                    C36_ScalarWide,
	"C36_TensorFloat32":                 C36_TensorFloat32,
	"C36_TensorFloat64":                 C36_TensorFloat64,
	"C36_TensorInt":                     C36_TensorInt,
	"C36_TensorInt64":                   C36_TensorInt64,
	"C36_TensorLarge":                   C36_TensorLarge,
}
