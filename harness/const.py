"""Physical constants in reduced Planck units, derived here from the SI constants (and nothing of primpy)."""
import math
from scipy import constants as sc

pi = math.pi
MPC_M = 1e6 * sc.parsec
M_P = math.sqrt(sc.hbar * sc.c / (8 * pi * sc.G))      # kg
L_P = sc.hbar / (M_P * sc.c)                            # m
T_P = L_P / sc.c                                        # s
TEMP_P = M_P * sc.c**2 / sc.k                           # K
GEV_P = M_P * sc.c**2 / (1e9 * sc.e)                    # GeV
C_KMS = sc.c / 1e3
K_STAR = 0.05                                           # 1/Mpc
K_STAR_LP = K_STAR / MPC_M * L_P
T_CMB = 2.72548 / TEMP_P
T_NU = (4 / 11)**(1 / 3)
N_EFF = 3.044
G0 = 2 + 7 / 4 * N_EFF * 4 / 11                         # entropy degrees of freedom today


def ln_a0_over_areh(rho_reh, g_th):
    """Entropy conservation from the end of reheating to today: ln(a0/a_reh)."""
    T_reh = (30 * rho_reh / (pi**2 * g_th))**0.25
    return math.log((g_th / G0)**(1 / 3) * T_reh / T_CMB)


def rho_from_GeV(r):
    return (r / GEV_P)**4
