// Command data monitors the text interface between the test suites and the
// viewers: benchmark output, warning reports, and the parsers of both.
package main

import "github.com/madkins23/go-slog/internal/zverif/kit"

func main() {
	alone()
	kit.Main(map[string]func(*kit.Ctx){
		"C16": benchParse,
		"C17": warningsRoundTrip,
		"C18": warningManager,
		"C25": tabular,
		"C26": server,
	})
}
