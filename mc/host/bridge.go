// Package host runs the plugin's callbacks from several threads under the
// controlled scheduler.
package host

// #cgo CFLAGS: -I${SRCDIR}/../../include -w
// #define createComponent real_createComponent
// #include "../../bridge/bridge.c"
// #include "../../bridge/component.c"
// #undef createComponent
// // the component's handle serves as its address
// void* createComponent(void* h) { return h; }
import "C"
