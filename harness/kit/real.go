package kit

import (
	"fmt"
	"path/filepath"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"

	. "ctngverif/lib"
)

// StartRealCA starts the i-th CA of the world.
func StartRealCA(c *Case, w *World, i int, set func(*CA.CAContext)) *CA.CAContext {
	pub, priv, cr := w.Cfg("C", i)
	ctx := CA.InitializeCAContext(pub, priv, cr)
	ctx.StoragePath1 = filepath.Join(c.Dir, fmt.Sprintf("ca%d-1.json", i))
	ctx.StoragePath2 = filepath.Join(c.Dir, fmt.Sprintf("ca%d-2.json", i))
	ctx.Max_latency = 0
	if set != nil {
		set(ctx)
	}
	go CA.StartCA(ctx)
	return ctx
}

// StartRealLogger starts the i-th logger of the world.
func StartRealLogger(c *Case, w *World, i int, set func(*Logger.LoggerContext)) *Logger.LoggerContext {
	pub, priv, cr := w.Cfg("L", i)
	ctx := Logger.InitializeLoggerContext(pub, priv, cr)
	ctx.StoragePath = filepath.Join(c.Dir, fmt.Sprintf("logger%d.json", i))
	ctx.Max_latency = 0
	if set != nil {
		set(ctx)
	}
	go Logger.StartLogger(ctx)
	return ctx
}
