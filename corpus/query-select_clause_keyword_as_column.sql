SELECT id, from, to, where, group, order FROM transfers
