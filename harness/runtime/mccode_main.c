/* argv: name=value sets an instrument parameter; -t traces display; -n N sets the particle count per script;
   standard input: one line of scripted choices per run of the event loop. */
static int verif_set(const char *key, const char *value) {
  int i, n = 0;
  for (i = 0; i < numipar; i++) if (!strcmp(mcinputtable[i].name, key)) {
    n++;
    switch (mcinputtable[i].type) {
      case instr_type_double: *(double *)mcinputtable[i].par = atof(value); break;
      case instr_type_int: *(int *)mcinputtable[i].par = atoi(value); break;
      case instr_type_string: case instr_type_char: *(char **)mcinputtable[i].par = strdup(value); break;
      default: printf("BADTYPE %s\n", key);
    }
  }
  return n;
}
int mccode_main(int argc, char *argv[]) {
  int i; unsigned long long n = 1;
  printf("INSTRUMENT %s\n", instrument_name);
  for (i = 0; i < numipar; i++) {
    printf("PAR %s %d [%s] [%s]\n", mcinputtable[i].name, (int)mcinputtable[i].type, mcinputtable[i].val ? mcinputtable[i].val : "", mcinputtable[i].unit ? mcinputtable[i].unit : "");
    if (mcinputtable[i].val && mcinputtable[i].val[0]) verif_set(mcinputtable[i].name, mcinputtable[i].val);
  }
  for (i = 1; i < argc; i++) {
    char *eq = strchr(argv[i], '=');
    if (!strcmp(argv[i], "-t")) mcdotrace = 1;
    else if (!strcmp(argv[i], "-n")) n = strtoull(argv[++i], NULL, 10);
    else if (eq) { *eq = 0; if (verif_set(argv[i], eq + 1) != 1) printf("BADPAR %s\n", argv[i]); }
  }
  printf("META %d\n", num_metadata);
  for (i = 0; i < num_metadata; i++)
    { char * f[4] = {metadata_table[i].source, metadata_table[i].name, metadata_table[i].type, metadata_table[i].value};
      int k; printf("MD");
      for (k = 0; k < 4; k++) { unsigned char * q = (unsigned char *) f[k]; printf(" -"); while (*q) printf("%02x", *q++); }
      printf("\n"); }
  printf("PHASE init\n");
  init();
  while (fgets(verif_script, sizeof(verif_script), stdin)) {
    verif_len = strcspn(verif_script, "\n"); verif_pos = 0; verif_exhausted = 0;
    gpu_innerloop = n;
    printf("RUN\n");
#ifdef FUNNEL
    raytrace_all_funnel(n, 1);
#else
    raytrace_all(n, 1);
#endif
    printf("END %d %d\n", verif_len - verif_pos, verif_exhausted);
  }
  printf("PHASE save\n");
  save(NULL);
  printf("PHASE finally\n");
  finally();
  printf("PHASE display\n");
  display();
  printf("PHASE done %d\n", verif_siminfo_open);
  for (i = 1; i <= mcNUMCOMP; i++) printf("POSA %d %g %g %g\n", i, verif_r(POS_A_COMP_INDEX(i).x), verif_r(POS_A_COMP_INDEX(i).y), verif_r(POS_A_COMP_INDEX(i).z));
  return 0;
}
