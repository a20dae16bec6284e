void stracpy(char *destination, const char *source, size_t amount) {
  if (!destination || !source || !amount) return;
  while (amount--) if ((*destination++ = *source++) == '\0') break;
}
Coords coords_set(MCNUM x, MCNUM y, MCNUM z) { Coords a; a.x = x; a.y = y; a.z = z; return a; }
Coords coords_get(Coords a, MCNUM *x, MCNUM *y, MCNUM *z) { *x = a.x; *y = a.y; *z = a.z; return a; }
Coords coords_add(Coords a, Coords b) { return coords_set(a.x + b.x, a.y + b.y, a.z + b.z); }
Coords coords_sub(Coords a, Coords b) { return coords_set(a.x - b.x, a.y - b.y, a.z - b.z); }
Coords coords_neg(Coords a) { return coords_set(-a.x, -a.y, -a.z); }
double coords_len(Coords a) { return sqrt(a.x*a.x + a.y*a.y + a.z*a.z); }
int coords_test_zero(Coords a) { return a.x == 0 && a.y == 0 && a.z == 0; }
void rot_set_rotation(Rotation t, double phx, double phy, double phz) {
  if (phx == 0 && phy == 0 && phz == 0) {
    t[0][0] = t[1][1] = t[2][2] = 1;
    t[0][1] = t[0][2] = t[1][0] = t[1][2] = t[2][0] = t[2][1] = 0;
  } else {
    double cx = cos(phx), sx = sin(phx), cy = cos(phy), sy = sin(phy), cz = cos(phz), sz = sin(phz);
    t[0][0] = cy*cz;
    t[0][1] = sx*sy*cz + cx*sz;
    t[0][2] = sx*sz - cx*sy*cz;
    t[1][0] = -cy*sz;
    t[1][1] = cx*cz - sx*sy*sz;
    t[1][2] = sx*cz + cx*sy*sz;
    t[2][0] = sy;
    t[2][1] = -sx*cy;
    t[2][2] = cx*cy;
  }
}
int rot_test_identity(Rotation t) { return t[0][0] + t[1][1] + t[2][2] == 3; }
void rot_mul(Rotation t1, Rotation t2, Rotation t3) {
  Rotation r; int i, j, k;
  for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) {
    r[i][j] = 0; for (k = 0; k < 3; k++) r[i][j] += t1[i][k]*t2[k][j];
  }
  memcpy(t3, r, sizeof(Rotation));
}
void rot_copy(Rotation dest, Rotation src) { memcpy(dest, src, sizeof(Rotation)); }
void rot_transpose(Rotation src, Rotation dst) {
  Rotation r; int i, j;
  for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) r[j][i] = src[i][j];
  memcpy(dst, r, sizeof(Rotation));
}
Coords rot_apply(Rotation t, Coords a) {
  return coords_set(t[0][0]*a.x + t[0][1]*a.y + t[0][2]*a.z,
                    t[1][0]*a.x + t[1][1]*a.y + t[1][2]*a.z,
                    t[2][0]*a.x + t[2][1]*a.y + t[2][2]*a.z);
}
void siminfo_init(FILE *f) { verif_siminfo_open++; }
void siminfo_close(void) { verif_siminfo_open--; }
/* ---- scripted choices and the log ---- */
static char verif_script[1 << 16];
static int verif_pos = 0, verif_len = 0;
int verif_exhausted = 0;
int verif_next(void) {
  if (verif_pos >= verif_len) { verif_exhausted++; return 0; }
  return verif_script[verif_pos++] - '0';
}
double verif_r(double v) { double r = floor(v*1e4 + 0.5)/1e4; return r == 0 ? 0 : r; }
void verif_component(char *name, Coords c, Rotation t) {
  printf("POSE %s %g %g %g %g %g %g %g %g %g %g %g %g\n", name, verif_r(c.x), verif_r(c.y), verif_r(c.z),
         verif_r(t[0][0]), verif_r(t[0][1]), verif_r(t[0][2]), verif_r(t[1][0]), verif_r(t[1][1]),
         verif_r(t[1][2]), verif_r(t[2][0]), verif_r(t[2][1]), verif_r(t[2][2]));
}
