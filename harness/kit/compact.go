package kit

import (
	"crypto/sha256"
	"encoding/json"
	"net/http"

	. "ctngverif/lib"
)

// Announce tells the gossiper that peer has a revocation, and has the peer serve it when asked.
func (l *Lab) Announce(peer string, o Obj) *bool {
	served := new(bool)
	old := l.peer(peer)
	h := sha256.Sum256([]byte(o.Signature[0] + o.Signer + o.Period + o.Type + o.Payload[0] + o.Payload[1] + o.Payload[2]))
	l.Net.Handle(peer, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/gossip/new_payload_request" {
			var nt notification
			if json.NewDecoder(r.Body).Decode(&nt) == nil && nt.Entity_URL == o.Payload[0] && nt.Period == o.Period {
				*served = true
				l.Give(peer, o)
			}
			return
		}
		old.ServeHTTP(rw, r)
	}))
	nt := notification{Sender: peer, Period: o.Period, Type: o.Type, Entity_URL: o.Payload[0], Objhash: h[:]}
	b, _ := json.Marshal(nt)
	l.Net.Post(peer, l.Self, "/gossip/new_payload_notification", b)
	return served
}
