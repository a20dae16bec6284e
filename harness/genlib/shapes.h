typedef struct { double a, b; } shape_t;
double shape_area(shape_t s);
