// Code generated by gen.sh. DO NOT EDIT.

package main

import "verifharness/h"

var registry = map[string]func(){
	"C01_AnyText":       h.C01_AnyText,
	"C01_Lines":         h.C01_Lines,
	"C01_Long":          h.C01_Long,
	"C01_Many":          h.C01_Many,
	"C02_Full21":        h.C02_Full21,
	"C02_Full22":        h.C02_Full22,
	"C02_Full23":        h.C02_Full23,
	"C02_Many21":        h.C02_Many21,
	"C02_Many22":        h.C02_Many22,
	"C02_Many23":        h.C02_Many23,
	"C02_Order21":       h.C02_Order21,
	"C02_Order22":       h.C02_Order22,
	"C02_Order23":       h.C02_Order23,
	"C02_Pair21":        h.C02_Pair21,
	"C02_Pair22":        h.C02_Pair22,
	"C02_Pair23":        h.C02_Pair23,
	"C02_Shape21":       h.C02_Shape21,
	"C02_Shape22":       h.C02_Shape22,
	"C02_Shape23":       h.C02_Shape23,
	"C03_Fields21":      h.C03_Fields21,
	"C03_Fields22":      h.C03_Fields22,
	"C03_Fields23":      h.C03_Fields23,
	"C03_Many21":        h.C03_Many21,
	"C03_Many22":        h.C03_Many22,
	"C03_Many23":        h.C03_Many23,
	"C03_Sections21":    h.C03_Sections21,
	"C03_Sections22":    h.C03_Sections22,
	"C03_Sections23":    h.C03_Sections23,
	"C04_Expire21":      h.C04_Expire21,
	"C04_Expire22":      h.C04_Expire22,
	"C04_Expire23":      h.C04_Expire23,
	"C04_Known21":       h.C04_Known21,
	"C04_Known22":       h.C04_Known22,
	"C04_Known23":       h.C04_Known23,
	"C04_Many21":        h.C04_Many21,
	"C04_Many22":        h.C04_Many22,
	"C04_Many23":        h.C04_Many23,
	"C04_Steps21":       h.C04_Steps21,
	"C04_Steps22":       h.C04_Steps22,
	"C04_Steps23":       h.C04_Steps23,
	"C04_Unknown21":     h.C04_Unknown21,
	"C04_Unknown22":     h.C04_Unknown22,
	"C04_Unknown23":     h.C04_Unknown23,
	"C04_Values21":      h.C04_Values21,
	"C04_Values22":      h.C04_Values22,
	"C04_Values23":      h.C04_Values23,
	"C05_Identifiers21": h.C05_Identifiers21,
	"C05_Identifiers22": h.C05_Identifiers22,
	"C05_Identifiers23": h.C05_Identifiers23,
	"C05_Many21":        h.C05_Many21,
	"C05_Many22":        h.C05_Many22,
	"C05_Many23":        h.C05_Many23,
	"C06_Full21":        h.C06_Full21,
	"C06_Full22":        h.C06_Full22,
	"C06_Full23":        h.C06_Full23,
	"C06_Many21":        h.C06_Many21,
	"C06_Many22":        h.C06_Many22,
	"C06_Many23":        h.C06_Many23,
	"C06_Options21":     h.C06_Options21,
	"C06_Options22":     h.C06_Options22,
	"C06_Options23":     h.C06_Options23,
	"C06_Pair21":        h.C06_Pair21,
	"C06_Pair22":        h.C06_Pair22,
	"C06_Pair23":        h.C06_Pair23,
	"C06_Shape21":       h.C06_Shape21,
	"C06_Shape22":       h.C06_Shape22,
	"C06_Shape23":       h.C06_Shape23,
	"C07_Many22":        h.C07_Many22,
	"C07_Many23":        h.C07_Many23,
	"C07_Shorthand22":   h.C07_Shorthand22,
	"C07_Shorthand23":   h.C07_Shorthand23,
	"C08_Again":         h.C08_Again,
	"C08_Decode":        h.C08_Decode,
	"C08_Encode":        h.C08_Encode,
	"C08_TagValue21":    h.C08_TagValue21,
	"C08_TagValue22":    h.C08_TagValue22,
	"C08_TagValue23":    h.C08_TagValue23,
	"C09_AnyText21":     h.C09_AnyText21,
	"C09_AnyText22":     h.C09_AnyText22,
	"C09_AnyText23":     h.C09_AnyText23,
	"C09_Extra21":       h.C09_Extra21,
	"C09_Extra22":       h.C09_Extra22,
	"C09_Extra23":       h.C09_Extra23,
	"C09_Layout21":      h.C09_Layout21,
	"C09_Layout22":      h.C09_Layout22,
	"C09_Layout23":      h.C09_Layout23,
	"C09_Target21":      h.C09_Target21,
	"C09_Target22":      h.C09_Target22,
	"C09_Target23":      h.C09_Target23,
	"C09_Write21":       h.C09_Write21,
	"C09_Write22":       h.C09_Write22,
	"C09_Write23":       h.C09_Write23,
	"C10_JSON":          h.C10_JSON,
	"C10_NoDocument":    h.C10_NoDocument,
	"C10_RDF":           h.C10_RDF,
	"C10_TagValue":      h.C10_TagValue,
	"C10_Target":        h.C10_Target,
	"C10_Write":         h.C10_Write,
	"C10_WriteOther":    h.C10_WriteOther,
	"C10_YAML":          h.C10_YAML,
	"C11_Full21to22":    h.C11_Full21to22,
	"C11_Full21to23":    h.C11_Full21to23,
	"C11_Full22to23":    h.C11_Full22to23,
	"C11_Many21to22":    h.C11_Many21to22,
	"C11_Many21to23":    h.C11_Many21to23,
	"C11_Many22to23":    h.C11_Many22to23,
	"C11_Pair21to22":    h.C11_Pair21to22,
	"C11_Pair21to23":    h.C11_Pair21to23,
	"C11_Pair22to23":    h.C11_Pair22to23,
	"C12_Full22to21":    h.C12_Full22to21,
	"C12_Full23to21":    h.C12_Full23to21,
	"C12_Full23to22":    h.C12_Full23to22,
	"C12_Many22to21":    h.C12_Many22to21,
	"C12_Many23to21":    h.C12_Many23to21,
	"C12_Many23to22":    h.C12_Many23to22,
	"C12_Pair22to21":    h.C12_Pair22to21,
	"C12_Pair23to21":    h.C12_Pair23to21,
	"C12_Pair23to22":    h.C12_Pair23to22,
	"C13_Links22":       h.C13_Links22,
	"C13_Links23":       h.C13_Links23,
	"C13_Many22":        h.C13_Many22,
	"C13_Many23":        h.C13_Many23,
	"C13_Missing22":     h.C13_Missing22,
	"C13_Missing23":     h.C13_Missing23,
	"C13_Text22":        h.C13_Text22,
	"C13_Text23":        h.C13_Text23,
	"C13_Triple22":      h.C13_Triple22,
	"C13_Triple23":      h.C13_Triple23,
	"C14_Document22":    h.C14_Document22,
	"C14_Document23":    h.C14_Document23,
	"C14_File22":        h.C14_File22,
	"C14_File23":        h.C14_File23,
	"C14_Many22":        h.C14_Many22,
	"C14_Many23":        h.C14_Many23,
	"C14_Package22":     h.C14_Package22,
	"C14_Package23":     h.C14_Package23,
	"C14_Sharing22":     h.C14_Sharing22,
	"C14_Sharing23":     h.C14_Sharing23,
	"C14_Snippet22":     h.C14_Snippet22,
	"C14_Snippet23":     h.C14_Snippet23,
	"C14_Twins22":       h.C14_Twins22,
	"C14_Twins23":       h.C14_Twins23,
	"C15_FromFiles22":   h.C15_FromFiles22,
	"C15_FromFiles23":   h.C15_FromFiles23,
	"C15_Licenses22":    h.C15_Licenses22,
	"C15_Licenses23":    h.C15_Licenses23,
	"C15_Many22":        h.C15_Many22,
	"C15_Many23":        h.C15_Many23,
	"C16_Code":          h.C16_Code,
	"C16_Many":          h.C16_Many,
	"C16_Missing":       h.C16_Missing,
	"C17_Many":          h.C17_Many,
	"C17_One":           h.C17_One,
	"C17_Several":       h.C17_Several,
	"C18_Hashes":        h.C18_Hashes,
	"C18_Ignored":       h.C18_Ignored,
	"C18_Kinds":         h.C18_Kinds,
	"C18_Many":          h.C18_Many,
	"C18_Missing":       h.C18_Missing,
	"C18_Names":         h.C18_Names,
	"C18_Prefix":        h.C18_Prefix,
	"C19_Build":         h.C19_Build,
	"C19_CreatorType":   h.C19_CreatorType,
	"C19_Ignored":       h.C19_Ignored,
	"C19_Many":          h.C19_Many,
	"C19_Missing":       h.C19_Missing,
	"C19_Names":         h.C19_Names,
	"C20_Deep":          h.C20_Deep,
	"C20_Files":         h.C20_Files,
	"C20_Ignored":       h.C20_Ignored,
	"C20_Lead":          h.C20_Lead,
	"C20_Line":          h.C20_Line,
	"C20_Lines":         h.C20_Lines,
	"C20_Long":          h.C20_Long,
	"C20_Many":          h.C20_Many,
	"C20_Names":         h.C20_Names,
	"C20_NoTag":         h.C20_NoTag,
	"C21_Groups":        h.C21_Groups,
	"C21_Many":          h.C21_Many,
	"C21_NoLicense":     h.C21_NoLicense,
	"C22_Again":         h.C22_Again,
	"C22_Counts":        h.C22_Counts,
	"C22_Many":          h.C22_Many,
	"C22_Unanalyzed":    h.C22_Unanalyzed,
	"C23_JSON21":        h.C23_JSON21,
	"C23_JSON22":        h.C23_JSON22,
	"C23_JSON23":        h.C23_JSON23,
	"C23_Report":        h.C23_Report,
	"C23_TagValue21":    h.C23_TagValue21,
	"C23_TagValue22":    h.C23_TagValue22,
	"C23_TagValue23":    h.C23_TagValue23,
	"C23_YAML21":        h.C23_YAML21,
	"C23_YAML22":        h.C23_YAML22,
	"C23_YAML23":        h.C23_YAML23,
	"C24_Elements":      h.C24_Elements,
	"C24_Many":          h.C24_Many,
	"C24_Relationships": h.C24_Relationships,
	"C25_Described":     h.C25_Described,
	"C25_Filter":        h.C25_Filter,
	"C25_Many":          h.C25_Many,
	"C25_Sort":          h.C25_Sort,
	"C26_Flag21":        h.C26_Flag21,
	"C26_Flag22":        h.C26_Flag22,
	"C26_Flag23":        h.C26_Flag23,
	"C26_Many21":        h.C26_Many21,
	"C26_Many22":        h.C26_Many22,
	"C26_Many23":        h.C26_Many23,
	"C27_Fails":         h.C27_Fails,
	"C27_Large":         h.C27_Large,
	"C27_Pieces":        h.C27_Pieces,
	"C28_Again":         h.C28_Again,
	"C28_Apart":         h.C28_Apart,
	"C28_History":       h.C28_History,
	"C29_Kind":          h.C29_Kind,
	"C29_Null":          h.C29_Null,
	"C29_Nulls":         h.C29_Nulls,
	"C30_Graph22":       h.C30_Graph22,
	"C30_Graph23":       h.C30_Graph23,
	"C30_Operation":     h.C30_Operation,
	"C30_Several":       h.C30_Several,
	"C31_Lists":         h.C31_Lists,
	"C31_Shapes":        h.C31_Shapes,
	"C31_Together":      h.C31_Together,
	"C31_Unchanged":     h.C31_Unchanged,
	"C31_Values":        h.C31_Values,
}
