G='Bounded: all values of the symbolic holes of the listed program templates (sizes in the evidence file), every feasible path; undecided solver queries are reported as not covered. '
for k in range(1,21): NOTE['C%02d'%k]=G
NOTE['C02']+='INTEGER holes are full 64-bit, REAL holes all finite doubles up to 1e200 in magnitude; quotients of REALs by symbolic divisors only within small ranges.'
