------------------------------ MODULE MPSRegMC ------------------------------
EXTENDS MPSReg
SimDims == {<<2,2,2>>, <<2,2,2,2>>, <<2,3,2>>, <<3,2,2>>, <<2,2>>, <<2,2,3>>}
AllKinds == {"NewProduct","NewTensors","Position","Schmidt","Arith","Conj","Copy","File","OneSite","TwoSite","NoTrunc","Dot","Measure","Corr"}
SimEntries == -1..2
=============================================================================
