package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"tshverif/h"
)

func sortStrings(s []string) { sort.Strings(s) }

// freshDir makes an empty directory that the scripts' user may write to.
func freshDir(name string) string {
	d := filepath.Join(h.Scratch(), name)
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0o777); err != nil {
		h.Infra("%v", err)
	}
	os.Chmod(d, 0o777)
	return d
}

// dirText lists a directory's files with their contents.
func dirText(d string) string {
	var b strings.Builder
	filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			h.Infra("%v", err)
		}
		rel, _ := filepath.Rel(d, p)
		if i.IsDir() {
			fmt.Fprintf(&b, "%s/\n", rel)
			return nil
		}
		c, err := os.ReadFile(p)
		if err != nil {
			h.Infra("%v", err)
		}
		fmt.Fprintf(&b, "%q=%q\n", rel, c)
		return nil
	})
	return b.String()
}

func dirNames(d string) string {
	es, err := os.ReadDir(d)
	if err != nil {
		h.Infra("%v", err)
	}
	var b strings.Builder
	for _, e := range es {
		b.WriteString(e.Name() + "\n")
	}
	return b.String()
}
