------------------------------- MODULE MC_Brands -------------------------------
EXTENDS Brands, Json, IOUtils
Cfg == ndJsonDeserialize(IOEnv.FOCUS)[1]
OffC == { Cfg.off[k] : k \in 1..Len(Cfg.off) }
LenC == Cfg.len
BoxesC == Cfg.boxes
ValsC == Cfg.vals
StepsC == Cfg.steps
\* steps is a bound, not part of the state; where containers live does not matter
View == <<mem, boxes, vals, held, brands, wrong>>
=============================================================================
