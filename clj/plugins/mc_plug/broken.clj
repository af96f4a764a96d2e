(ns mc-plug.broken)
(throw (ex-info "broken" {}))
