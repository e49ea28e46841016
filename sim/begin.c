char sim_lib_data_lo[16] = {1};
char sim_lib_bss_lo[16];
__thread char sim_lib_tdata_lo[16] = {1};
__thread char sim_lib_tbss_lo[16];
