package env

import (
	"net/http"

	"github.com/Redundancy/go-sync/blocksources"
)

func init() {
	useClient = append(useClient, func(c *http.Client) { blocksources.ClientNoCompression = c })
}
