package main

import "github.com/cybergarage/go-sqlparser/sql"

// warmUp does a process's first parse, alone (the static tables of the generated parser are built once).
func warmUp() { _, _ = sql.NewParser().ParseString("SELECT 1") }
