/* stand-in for the few Windows declarations the run-time uses */
typedef int BOOL; typedef unsigned long DWORD;
#define WINAPI
#define TRUE 1
#define FALSE 0
#define CTRL_C_EVENT 0
#define CTRL_BREAK_EVENT 1
#define CTRL_CLOSE_EVENT 2
#define CTRL_LOGOFF_EVENT 5
#define CTRL_SHUTDOWN_EVENT 6
BOOL SetConsoleCtrlHandler(BOOL (*)(DWORD), BOOL);
