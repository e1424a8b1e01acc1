#include "variant2.hpp"
V2_COMMON(AB, A, B) V2_COPY(AB, A, B) V2_DEFAULT(AB, A, B)
V2_COMMON(BD, B, D) V2_COPY(BD, B, D) V2_DEFAULT(BD, B, D)
V2_COMMON(TB, T, B) V2_COPY(TB, T, B) V2_DEFAULT(TB, T, B)
V2_COMMON(BT, B, T) V2_COPY(BT, B, T) V2_DEFAULT(BT, B, T)
V2_COMMON(TS, T, S) V2_COPY(TS, T, S) V2_DEFAULT(TS, T, S)
V2_COMMON(MN, M, N) V2_COPY(MN, M, N) V2_DEFAULT(MN, M, N)
V2_COMMON(UB, U, B) V2_DEFAULT(UB, U, B)
V2_COMMON(EM, E, M) V2_COPY(EM, E, M) V2_DEFAULT(EM, E, M)
V2_COMMON(RR, R, R2) V2_COPY(RR, R, R2) V2_DEFAULT(RR, R, R2)
V2_COMMON(RT, R, T) V2_COPY(RT, R, T) V2_DEFAULT(RT, R, T)
V2_COMMON(GDA, GD, A) V2_COPY(GDA, GD, A) V2_DEFAULT(GDA, GD, A)
V2_COMMON(AGD, A, GD) V2_COPY(AGD, A, GD) V2_DEFAULT(AGD, A, GD)
V2_COMMON(GCA, GC, A) V2_COPY(GCA, GC, A) V2_DEFAULT(GCA, GC, A)
V2_COMMON(AGC, A, GC) V2_COPY(AGC, A, GC) V2_DEFAULT(AGC, A, GC)
V2_COMMON(GMA, GM, A) V2_COPY(GMA, GM, A) V2_DEFAULT(GMA, GM, A)
V2_COMMON(AGM, A, GM) V2_COPY(AGM, A, GM) V2_DEFAULT(AGM, A, GM)
V2_COMMON(GAA, GA, A) V2_COPY(GAA, GA, A) V2_DEFAULT(GAA, GA, A)
V2_COMMON(AGA, A, GA) V2_COPY(AGA, A, GA) V2_DEFAULT(AGA, A, GA)
V2_COMMON(GVA, GV, A) V2_COPY(GVA, GV, A) V2_DEFAULT(GVA, GV, A)
V2_COMMON(AGV, A, GV) V2_COPY(AGV, A, GV) V2_DEFAULT(AGV, A, GV)
