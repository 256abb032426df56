package harness

var checks = map[string]func(*Ctx){}

func register(id string, f func(*Ctx)) { checks[id] = f }
