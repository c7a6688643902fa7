package simrt

var SiteNames = []string{}
