package kit

import "flag"

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		panic(err)
	}
}
