SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPods=4 Sizes={0,1,2} MaxScale=2 MaxFail=1 ByName=FALSE
PROPERTIES LawfulCreate LawfulDecide Settles
