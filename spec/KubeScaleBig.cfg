SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPods=5 Sizes={0,1,2,3} MaxScale=3 MaxFail=1 ByName=TRUE
PROPERTIES LawfulCreate LawfulDecide Settles
