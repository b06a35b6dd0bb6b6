// Command handlers watches the slog handlers of the repository at work.
package main

import "github.com/madkins23/go-slog/internal/zverif/kit"

func main() {
	refusing()
	kit.Main(map[string]func(*kit.Ctx){
		"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05,
		"C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
		"C11": c11, "C19": c19,
	})
}
