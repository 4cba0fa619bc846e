package check

import (
	"embed"
	"fmt"
	"strings"
)

//go:embed jobs/*.txt
var jobFiles embed.FS

// Jobs reads the jobs of a property; those after a line "thorough" belong to that tier only.
func Jobs(id, tier string) ([]Job, error) {
	b, err := jobFiles.ReadFile("jobs/" + id + ".txt")
	if err != nil {
		return nil, fmt.Errorf("no check for %s", id)
	}
	quick, thorough, _ := strings.Cut(string(b), "\nthorough\n")
	if tier == "thorough" {
		quick += "\n" + thorough
	}
	return Parse(quick)
}
