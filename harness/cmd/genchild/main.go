// genchild runs the code generator once: genchild CONFIG.json (a codegen.Config as JSON), in the current directory.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"log/slog"
	"os"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"
)

func main() {
	log.SetOutput(io.Discard)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	cfg := new(codegen.Config)
	if err := json.Unmarshal(b, cfg); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	if err := codegen.Generate(cfg); err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(1)
	}
}
