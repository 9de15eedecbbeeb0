// Scratch-only file, copied like zz_verif_dump.go.  With GV_FORM=file the formula handed to the search is written
// there instead of being searched.
package main

import (
	"encoding/json"
	"os"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Search"
)

type gvFormSearch struct{ Search.SearchAlgorithm }

func (gvFormSearch) Search(f AST.Form, bound int) bool {
	b, err := json.Marshal(gvNode{"f": gvForm(f), "bound": bound, "conj": Glob.IsConjectureFound()})
	if err == nil {
		os.WriteFile(os.Getenv("GV_FORM"), b, 0644)
	}
	return false
}

func init() {
	if os.Getenv("GV_FORM") != "" {
		Search.SetSearchAlgorithm(gvFormSearch{Search.UsedSearch})
	}
}
