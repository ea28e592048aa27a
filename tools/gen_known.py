#!/usr/bin/env python3
"""Writes known_findings.json from the list below (run by hand, never by a check)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines()
def h(sub):
    for l in log:
        if sub in l: return l.split()[0]
    raise SystemExit('no commit: '+sub)
F = [
 ('C01','refuse an index of the wrong arity','an index with fewer or more components than dimensions panicked'),
 ('C05','pad the result of TensorMat.Reshape','eager Reshape to a larger size left the data short'),
 ('C05','extended sub-tensors fill from','extended sub-tensor read one position past the source'),
 ('C07','refuse to concat tensors that differ','Concat joined tensors whose other dimensions differ'),
 ('C09','TensorMat.Concat returns an independent','eager Concat along the first dimension shared the operand storage'),
 ('C07','refuse dot products along dimensions','Dot along a dimension the tensors do not have panicked'),
 ('C09','tensors keep their own copy of the shape','a tensor changed shape when the caller altered the slice it was made with'),
 ('C05','flatten a deferred tensor','lazy Flatten of a deferred tensor had size 0'),
 ('C27','SaveFull and LoadFull','SaveFull wrote nothing readable and LoadFull panicked'),
 ('C27','save and load tensors with int','int tensors could not be saved'),
 ('C13','derivative of ELU','ELU.Derive returned x+alpha for non-negative x'),
 ('C13','derivative of GELU','GELU.Derive was not the derivative of GELU.Activate'),
 ('C21','backpropagate convolutions whose width','Conv2D backpropagation mixed up width and height'),
 ('C18','NewUpSampling2Dxy','NewUpSampling2Dxy made another layer type'),
 ('C18','max-pooling covers the border','MaxPool2D output extent wrong when the window does not divide the input'),
 ('C28','train, save and load the branches','branches of a Concat layer were not trained, saved or loaded'),
 ('C24','Model.SetTrainable reaches','SetTrainable skipped the first layer and joined branches'),
 ('C26','training a model that was not compiled','Train on a fresh model panicked'),
 ('C21','flatten layer does not count twice','the error signal through a Flatten layer was halved'),
 ('C22','remember the last update','momentum added a wrong previous movement'),
 ('C17','refuse convolution kernels larger','a kernel larger than the input panicked or looped'),
 ('C32','SmoothScale repeats the border','SmoothScale read outside the source and lost channels'),
 ('C31','load images whose bounds','images whose bounds do not start at 0,0 were misread'),
 ('C32','LoadSmoothScaled repeats','LoadSmoothScaled mixed in black at the border'),
 ('C15','compare scalars of different kinds','F32(1).Cmp(F64(1+1e-12)) was equal while the reverse was greater'),
 ('C35','an input layer inside a network','the error signal through the input layer of a nested model was halved'),
 ('C29','the output of a part of a combined model','the error signal between the parts of a combined model was halved'),
 ('C25','compiling a model again','compiling a model a second time emptied its graphs: predictions and training steps did nothing any more'),
 ('C36','read a layer\'s number after','dense and convolution layers returned their number in an order the language does not specify'),
 ('C36','list each layer of a model once','a layer below two branches was listed once per branch'),
 ('C36','print models with an input layer','printing a model that contains a model starting with an input layer panicked'),
 ('C36','name input, sub-tensor','up-sampling was printed as MaxPool, transposed convolution as Conv2D, input and sub-tensor layers without a kind'),
 ('C36','print a double scalar','F64(16777217).String() gave 1.6777216e+07'),
]
K = [
 ('C21','C21_SharedTrunk','a layer that feeds two layers: bias','a layer with parameters that feeds two layers (1-1 trunk below two joined 1-1 branches) is trained with half the signal of the first branch instead of the sum of both: it is backpropagated before the second branch has added its signal, and divided by its number of users'),
 ('C29','C29_UsedBefore','the combined model of a second part used before: elements','FromModels with a second model that was compiled or used before combining: its graph stays bound to its own input, so the combined prediction is not the composition'),
 ('C29','C29_TrainPart','the first part trained on its own: bias','training the first part of a combined model on its own: its layers belong to the graph of the last part, so the step overwrites the biases with stale values'),
 ('C29','C29_TrainPart','the first part trained on its own: weight','training the first part of a combined model on its own overwrites the weights with stale values'),
 ('C29','C29_TrainPart','the second part trained on its own: bias of the other part','training the last part of a combined model on its own also moves the parts before it'),
]
out = [dict(status='known', property=p, job=j, label=l, what=w) for p,j,l,w in K]
out += [dict(status='fixed', property=p, commit=h(s), what=w, line='fixed: property=%s %s %s' % (p,h(s),w)) for p,s,w in F]
json.dump(out, open(root+'/known_findings.json','w'), indent=1)
print(len(out))
