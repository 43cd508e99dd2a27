/* Included before every library source: gives the hooks in /repo (guard RMC_SIM) their values. */
extern unsigned long sim_first_pid;
#define RMC_SIM_FIRST_PID sim_first_pid
