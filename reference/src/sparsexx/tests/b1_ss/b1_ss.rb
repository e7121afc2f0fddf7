Grund/b1_ss; 1997; F. Grund; ed: F. Grund                              |449     
             5             1             1             3
rua                        7             7            15             0
(26I3)          (40I2)          (5E15.7)            
  1  4  6  8 10 12 14 16
 5 6 7 1 2 1 3 1 4 2 5 3 6 4 7
 -0.3599942E-01 -0.1763710E-01 -0.7721779E-02  0.1000000E+01 -0.1000000E+01
  0.1000000E+01 -0.1000000E+01  0.1000000E+01 -0.1000000E+01  0.4500000E+00
  0.1000000E+01  0.1000000E+00  0.1000000E+01  0.4500000E+00  0.1000000E+01
