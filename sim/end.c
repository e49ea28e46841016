char sim_lib_data_hi[16] = {1};
char sim_lib_bss_hi[16];
__thread char sim_lib_tdata_hi[16] = {1};
__thread char sim_lib_tbss_hi[16];
