package utils

import "fmt"

func gvcS(x ...any) func() string {
	return func() string { return fmt.Sprint(x...) }
}
