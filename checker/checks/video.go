package checks

import "strings"

func init() {
	register("V03", "abstract interpretation of the package initialisers (go/ssa): the decoding tables they build are compared with the standard's, word by word; path-sensitive dataflow of the macroblock and coefficient decoders gives the table every element is read with",
		"", func(c *Ctx) {
			c.Rule("every table built by the package initialisers that a decoder uses is one of the standard's tables, with all of its code words and no others; on every path, every element of a macroblock and of a block is decoded with its own table")
			a := c.videoAnchors()
			c.Guard("tables", func() { c.checkVLCTables(a.e, a.tables) })
			if len(c.Fails) > 0 {
				return
			}
			checkMB(c)
			c.coefTables()
		})
}

// coefTables checks the tables the coefficient decoder uses for each kind of
// block; what else it does is V15's business.
func (c *Ctx) coefTables() {
	a := c.videoAnchors()
	fn := a.blockRead
	q := c.coefArgs(fn)
	var ks []coefCfg
	for f := int64(0); f < 2; f++ {
		for cc := 0; cc < 3; cc++ {
			ks = append(ks, coefCfg{format: f, cc: cc}, coefCfg{intra: true, format: f, cc: cc, size: 0}, coefCfg{intra: true, format: f, cc: cc, size: 5})
		}
	}
	c.parallelN(len(ks), func(c *Ctx, i int) {
		sub := c.child()
		sub.Guard(ks[i].String(), func() { sub.coefRun(fn.String(), q, ks[i]) })
		for k := range sub.Fails {
			if !strings.Contains(k, " table") && !strings.HasPrefix(k, "undecided/") && !strings.HasPrefix(k, "anchor/") {
				delete(sub.Fails, k)
			}
		}
		c.adopt(sub)
	})
	c.Sample("%s: %d classes of blocks", fn, len(ks))
}
