package main

import (
	"fmt"
	"os"
	"sort"
)

func main() {
	repo, verif, tier := "/repo", "/verif", os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	var ids []string
	for i := 1; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "-repo":
			i++
			repo = os.Args[i]
		case "-verif":
			i++
			verif = os.Args[i]
		case "-tier":
			i++
			tier = os.Args[i]
		case "-list":
			for id := range properties {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				fmt.Println(id)
			}
			return
		default:
			ids = append(ids, os.Args[i])
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	code := 0
	for _, id := range ids {
		if n := checkMain(repo, verif, id, tier); n > code {
			code = n
		}
	}
	os.Exit(code)
}
