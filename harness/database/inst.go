package database

// VUse makes d the one connection of the process.
func VUse(d *Datasource) {
	once.Do(func() {})
	instance = d
}
