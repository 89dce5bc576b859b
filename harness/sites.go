package main

// Sites are the places of a calendar (of the package under test) that hold a
// string, an address, a time and so on. They are found by reflection.

import (
	"fmt"
	"net/url"
	"reflect"
	"time"

	"vimagination.zapto.org/ics"
)

type site struct {
	path string
	v    reflect.Value // settable
}

var (
	timeType  = reflect.TypeOf(time.Time{})
	urlType   = reflect.TypeOf(url.URL{})
	recurType = reflect.TypeOf(ics.Recur{})
	perType   = reflect.TypeOf(ics.Period{})
	durType   = reflect.TypeOf(ics.Duration{})
)

// collect finds all sites; f says for each value whether it is one, and whether
// to look inside of it.
func collect(v reflect.Value, path string, f func(path string, v reflect.Value) (is, inside bool)) []site {
	var sites []site

	is, inside := f(path, v)

	if is {
		sites = append(sites, site{path, v})
	}

	if !inside {
		return sites
	}

	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			sites = append(sites, collect(v.Elem(), path, f)...)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			sites = append(sites, collect(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)...)
		}
	case reflect.Struct:
		if v.Type() == timeType || v.Type() == urlType {
			return sites
		}

		for i := 0; i < v.NumField(); i++ {
			if ft := v.Type().Field(i); ft.IsExported() {
				sites = append(sites, collect(v.Field(i), path+"."+ft.Name, f)...)
			}
		}
	}

	return sites
}

func sitesOf(cal *ics.Calendar, f func(path string, v reflect.Value) (is, inside bool)) []site {
	return collect(reflect.ValueOf(cal).Elem(), "Calendar", f)
}

// stringSites are all strings of the calendar.
func stringSites(cal *ics.Calendar) []site {
	return sitesOf(cal, func(_ string, v reflect.Value) (bool, bool) { return v.Kind() == reflect.String, true })
}

// typeSites are all values of a type.
func typeSites(cal *ics.Calendar, t reflect.Type) []site {
	return sitesOf(cal, func(_ string, v reflect.Value) (bool, bool) { return v.Type() == t, true })
}

// hasPrefixType determines whether the type is a uint8 of the package that is
// used as an enumeration in a property.
func isPropEnum(t reflect.Type) bool {
	return t.Kind() == reflect.Uint8 && t.PkgPath() == reflect.TypeOf(ics.Calendar{}).PkgPath() && len(t.Name()) > 4 && t.Name()[:4] == "Prop"
}
