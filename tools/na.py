def na(id, reason): NA.append(dict(property=id, reason=reason))
