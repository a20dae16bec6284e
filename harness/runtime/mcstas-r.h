#define VERIF_VX vx
#define VERIF_VY vy
#define VERIF_VZ vz
#define VERIF_SX sx
#define VERIF_SY sy
#define VERIF_SZ sz
