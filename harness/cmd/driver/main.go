// driver performs one operation of the library and reports its outcome; it is
// built with the syscall overlay and run under package fault.
package main

import "verif/checks"

func main() { checks.DriverMain() }
