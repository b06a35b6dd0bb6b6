// Command suites monitors the verification and benchmark suites: it runs them on handlers of known behaviour.
package main

import "github.com/madkins23/go-slog/internal/zverif/kit"

func main() {
	kit.Main(map[string]func(*kit.Ctx){
		"C23": verification,
		"C24": benchmarking,
	})
}
