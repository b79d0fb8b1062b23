package c36

// #include <malloc.h>
// static unsigned long long inuse() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
import "C"

// cHeap tells how much memory allocated by C code is in use.
func cHeap() int64 { return int64(C.inuse()) }
