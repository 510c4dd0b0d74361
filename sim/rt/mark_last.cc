extern "C" {
char rt_last_data[16] = {1};
char rt_last_bss[16];
}
