//go:build !verifinstr

package eng

const Instrumented = false
const DefaultSteps = 0

func StepLimit(n int64)   {}
func Steps() int64        { return 0 }
func IsBudget(r any) bool { return false }
func SetHook(f func())    {}
