// Command support monitors the smaller packages: replacement functions, the gin
// writer and parser, and the JSON field counter.
package main

import "github.com/madkins23/go-slog/internal/zverif/kit"

func main() {
	kit.Main(map[string]func(*kit.Ctx){
		"C12": replaceFunctions,
		"C13": ginWriter,
		"C14": ginParse,
		"C15": fieldCounter,
		"C27": warningRegistry,
	})
}
