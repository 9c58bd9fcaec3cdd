package kit

import (
	"encoding/json"
	"path/filepath"

	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/monitor"

	. "ctngverif/lib"
)

// Client is a real client.
type Client struct {
	Ctx *client.ClientContext
}

// NewClient starts a client; a restarted one finds what was saved in dir.
func NewClient(w *World, dir string, restart bool) *Client {
	cfg := filepath.Join(dir, "client.json")
	WriteJSON(cfg, map[string]any{"Monitor_URLs": w.M, "Client_URL": "localhost:5000", "Port": "5000", "MMD": 60, "MRD": 60,
		"STH_Storage_filepath": filepath.Join(dir, "sth.json"), "CRV_Storage_filepath": filepath.Join(dir, "crv.json"), "PoM_Store_filepath": filepath.Join(dir, "pom.json")})
	_, _, cr := w.Cfg("M", 0)
	c := &Client{Ctx: &client.ClientContext{Config: &client.ClientConfig{}, Config_filepath: cfg, Crypto_filepath: cr, Status: "NEW"}}
	if restart {
		c.Ctx.Status = "RESTART"
	}
	c.Ctx.InitializeClientContext()
	return c
}

// Apply gives the client an update.
func (c *Client) Apply(u Update) bool {
	var mu monitor.ClientUpdate
	b, err := json.Marshal(u)
	if err == nil {
		err = json.Unmarshal(b, &mu)
	}
	if err != nil {
		panic(err)
	}
	return c.Ctx.HandleUpdate(mu, true, false)
}

// Save writes the databases.
func (c *Client) Save() {
	client.SaveSTHDatabase(c.Ctx)
	client.SaveCRVDatabase(c.Ctx)
	client.SavePomDatabase(c.Ctx)
}

// Snapshot is everything the client believes.
func (c *Client) Snapshot() string {
	crv := map[string][]byte{}
	for k, v := range c.Ctx.CRV_database {
		if v != nil {
			crv[k], _ = v.MarshalBinary()
		}
	}
	b, _ := json.Marshal([]any{c.Ctx.STH_database, crv, c.Ctx.POM_database})
	return string(b)
}

// Revoked tells which of the first n ids of the CA the client holds for revoked.
func (c *Client) Revoked(ca string) ([]uint, bool) {
	v, ok := c.Ctx.CRV_database[ca]
	if !ok || v == nil {
		return nil, false
	}
	out := []uint{}
	for i, e := v.NextSet(0); e; i, e = v.NextSet(i + 1) {
		out = append(out, i)
	}
	return out, true
}

// Known tells how many tree heads the client holds, and whom it holds a proof of misbehaviour against.
func (c *Client) Known() (int, []string) {
	m := map[string]bool{}
	for _, o := range c.Ctx.POM_database {
		m[o.Payload[0]] = true
	}
	return len(c.Ctx.STH_database), Keys(m)
}
