%include "tables"
double shape_area(shape_t s) { return table_at(0)*s.a*s.b; }
