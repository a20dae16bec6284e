typedef double table_t;
table_t table_at(int i);
