/* before the system's headers */
#define fopen vs_fopen
#define fclose vs_fclose
#define fprintf vs_fprintf
#define vfprintf vs_vfprintf
#define fputs vs_fputs
#define fputc vs_fputc
#define putc vs_fputc
#define fwrite vs_fwrite
#define ferror vs_ferror
#define fflush vs_fflush
