int mcallowbackprop = 0;
_class_particle mcsetstate(double x, double y, double z, double vx, double vy, double vz, double t,
  double sx, double sy, double sz, double p, int mcgravitation_, void *mcMagnet, int allow_backprop) {
  _class_particle q; memset(&q, 0, sizeof(q));
  q.x = x; q.y = y; q.z = z; q.vx = vx; q.vy = vy; q.vz = vz; q.t = t; q.sx = sx; q.sy = sy; q.sz = sz; q.p = p;
  q.mcgravitation = mcgravitation_; q.mcMagnet = mcMagnet; q.allow_backprop = allow_backprop;
  q._uid = 0; q._index = 1; q._absorbed = 0; q._restore = 0; q._scattered = 0;
  return q;
}
/* shared part of the flavours */
int mcgravitation = 0;
void mccoordschange(Coords a, Rotation r, _class_particle *q) {
  Coords b = coords_add(rot_apply(r, coords_set(q->x, q->y, q->z)), a);
  q->x = b.x; q->y = b.y; q->z = b.z;
  b = rot_apply(r, coords_set(q->VERIF_VX, q->VERIF_VY, q->VERIF_VZ));
  q->VERIF_VX = b.x; q->VERIF_VY = b.y; q->VERIF_VZ = b.z;
  b = rot_apply(r, coords_set(q->VERIF_SX, q->VERIF_SY, q->VERIF_SZ));
  q->VERIF_SX = b.x; q->VERIF_SY = b.y; q->VERIF_SZ = b.z;
}
void verif_log(long index, _class_particle *q) {
  printf("EV %ld %g %g %g %g %g %g %g %g %g\n", index, verif_r(q->x), verif_r(q->y), verif_r(q->z),
         verif_r(q->VERIF_VX), verif_r(q->VERIF_VY), verif_r(q->VERIF_VZ),
         verif_r(q->VERIF_SX), q->t, q->p);
}
long sort_absorb_last(_class_particle *particles, _class_particle *pbuffer, long len, long buffer_len,
                      long flag_split, long *multiplier) {
  long i, live = 0, mult = 1, m;
  for (i = 0; i < len; i++) if (!particles[i]._absorbed) particles[live++] = particles[i];
  if (flag_split && live > 0) mult = buffer_len / live;
  if (mult < 1) mult = 1;
  for (m = 1; m < mult; m++) for (i = 0; i < live; i++) particles[m*live + i] = particles[i];
  for (i = 0; i < live*mult; i++) particles[i].p /= mult;
  *multiplier = mult;
  return live*mult;
}
