#define VERIF_VX kx
#define VERIF_VY ky
#define VERIF_VZ kz
#define VERIF_SX Ex
#define VERIF_SY Ey
#define VERIF_SZ Ez
