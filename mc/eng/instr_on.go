//go:build verifinstr

package eng

import p "github.com/AfterShip/clickhouse-sql-parser/parser"

const Instrumented = true

// DefaultSteps bounds one case (several parses and formats of an input of at
// most a few kilobytes); the largest case on record uses far less.
const DefaultSteps = 10_000_000

func StepLimit(n int64) { p.VerifReset(n) }
func Steps() int64      { return p.VerifSteps() }
func IsBudget(r any) bool {
	_, ok := r.(p.VerifBudget)
	return ok
}
func SetHook(f func()) { p.VerifSetHook(f) }
