// formatting of values as texts: never reached where a contract rules it out
extern contract nkiDynStrCreate { requires [unreachable] \false; }
extern contract nkiDynStrAppend { requires [unreachable] \false; }
extern contract nkiDynStrAppendInt32 { requires [unreachable] \false; }
extern contract nkiDynStrAppendFloat { requires [unreachable] \false; }
extern contract nkiDynStrDelete { requires [unreachable] \false; }
extern contract atol(const char *s) : int { requires [unreachable] \false; }
extern contract atof(const char *s) : double { requires [unreachable] \false; }
