// Monitors for pkg/client: C27-C31.
package main

import "code.cloudfoundry.org/log-cache/verif/vk"

func main() {
	vk.Main(map[string]vk.Check{
		"C27": c27(),
		"C28": c28(),
		"C29": c29(),
		"C30": c30(),
		"C31": c31(),
	})
}
