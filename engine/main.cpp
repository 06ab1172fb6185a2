extern "C" int vp_main(int, char**);
int main(int c, char** v) { return vp_main(c, v); }
