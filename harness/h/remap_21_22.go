// Code generated from tmpl/remap.go.tmpl. DO NOT EDIT.

package h

import (
	"github.com/spdx/tools-golang/spdx/v2/common"
	from "github.com/spdx/tools-golang/spdx/v2/v2_1"
	to "github.com/spdx/tools-golang/spdx/v2/v2_2"
)

// remap21_22 is what both versions carry, copied field by field.
func remap21_22(d *from.Document) *to.Document {
	r := &to.Document{
		SPDXVersion:       to.Version,
		DataLicense:       d.DataLicense,
		SPDXIdentifier:    d.SPDXIdentifier,
		DocumentName:      d.DocumentName,
		DocumentNamespace: d.DocumentNamespace,
		DocumentComment:   d.DocumentComment,
	}
	if "21" == "22" {
		r.SPDXVersion = d.SPDXVersion
	}
	for _, e := range d.ExternalDocumentReferences {
		r.ExternalDocumentReferences = append(r.ExternalDocumentReferences, to.ExternalDocumentRef{DocumentRefID: e.DocumentRefID, URI: e.URI, Checksum: e.Checksum})
	}
	if c := d.CreationInfo; c != nil {
		r.CreationInfo = &to.CreationInfo{
			LicenseListVersion: c.LicenseListVersion,
			Creators:           append([]common.Creator(nil), c.Creators...),
			Created:            c.Created,
			CreatorComment:     c.CreatorComment,
		}
	}
	for _, p := range d.Packages {
		q := &to.Package{
			PackageName:                 p.PackageName,
			PackageSPDXIdentifier:       p.PackageSPDXIdentifier,
			PackageVersion:              p.PackageVersion,
			PackageFileName:             p.PackageFileName,
			PackageDownloadLocation:     p.PackageDownloadLocation,
			FilesAnalyzed:               p.FilesAnalyzed,
			IsFilesAnalyzedTagPresent:   p.IsFilesAnalyzedTagPresent,
			PackageVerificationCode:     code22(p.PackageVerificationCode),
			PackageChecksums:            append([]common.Checksum(nil), p.PackageChecksums...),
			PackageHomePage:             p.PackageHomePage,
			PackageSourceInfo:           p.PackageSourceInfo,
			PackageLicenseConcluded:     p.PackageLicenseConcluded,
			PackageLicenseInfoFromFiles: append([]string(nil), p.PackageLicenseInfoFromFiles...),
			PackageLicenseDeclared:      p.PackageLicenseDeclared,
			PackageLicenseComments:      p.PackageLicenseComments,
			PackageCopyrightText:        p.PackageCopyrightText,
			PackageSummary:              p.PackageSummary,
			PackageDescription:          p.PackageDescription,
			PackageComment:              p.PackageComment,
		}
		if p.PackageSupplier != nil {
			q.PackageSupplier = &common.Supplier{Supplier: p.PackageSupplier.Supplier, SupplierType: p.PackageSupplier.SupplierType}
		}
		if p.PackageOriginator != nil {
			q.PackageOriginator = &common.Originator{Originator: p.PackageOriginator.Originator, OriginatorType: p.PackageOriginator.OriginatorType}
		}
		for _, e := range p.PackageExternalReferences {
			q.PackageExternalReferences = append(q.PackageExternalReferences, &to.PackageExternalReference{Category: e.Category, RefType: e.RefType, Locator: e.Locator, ExternalRefComment: e.ExternalRefComment})
		}
		for _, x := range p.Files {
			q.Files = append(q.Files, remapFile21_22(x))
		}
		for _, a := range p.Annotations {
			q.Annotations = append(q.Annotations, remapAnn21_22(a))
		}
		r.Packages = append(r.Packages, q)
	}
	for _, x := range d.Files {
		r.Files = append(r.Files, remapFile21_22(x))
	}
	for _, l := range d.OtherLicenses {
		r.OtherLicenses = append(r.OtherLicenses, &to.OtherLicense{
			LicenseIdentifier:      l.LicenseIdentifier,
			ExtractedText:          l.ExtractedText,
			LicenseName:            l.LicenseName,
			LicenseCrossReferences: append([]string(nil), l.LicenseCrossReferences...),
			LicenseComment:         l.LicenseComment,
		})
	}
	for _, x := range d.Relationships {
		r.Relationships = append(r.Relationships, &to.Relationship{RefA: x.RefA, RefB: x.RefB, Relationship: x.Relationship, RelationshipComment: x.RelationshipComment})
	}
	for _, a := range d.Annotations {
		b := remapAnn21_22(*a)
		r.Annotations = append(r.Annotations, &b)
	}
	for _, s := range d.Snippets {
		r.Snippets = append(r.Snippets, remapSnippet21_22(s))
	}
	for _, x := range d.Reviews {
		r.Reviews = append(r.Reviews, &to.Review{Reviewer: x.Reviewer, ReviewerType: x.ReviewerType, ReviewDate: x.ReviewDate, ReviewComment: x.ReviewComment})
	}
	return r
}

func remapFile21_22(x *from.File) *to.File {
	y := &to.File{
		FileName:           x.FileName,
		FileSPDXIdentifier: x.FileSPDXIdentifier,
		FileTypes:          append([]string(nil), x.FileTypes...),
		Checksums:          append([]common.Checksum(nil), x.Checksums...),
		LicenseConcluded:   x.LicenseConcluded,
		LicenseInfoInFiles: append([]string(nil), x.LicenseInfoInFiles...),
		LicenseComments:    x.LicenseComments,
		FileCopyrightText:  x.FileCopyrightText,
		FileComment:        x.FileComment,
		FileNotice:         x.FileNotice,
		FileContributors:   append([]string(nil), x.FileContributors...),
		FileDependencies:   append([]string(nil), x.FileDependencies...),
	}
	for _, a := range x.ArtifactOfProjects {
		y.ArtifactOfProjects = append(y.ArtifactOfProjects, &to.ArtifactOfProject{Name: a.Name, HomePage: a.HomePage, URI: a.URI})
	}
	if x.Snippets != nil {
		y.Snippets = map[common.ElementID]*to.Snippet{}
	}
	for k, s := range x.Snippets {
		t := remapSnippet21_22(*s)
		y.Snippets[k] = &t
	}
	for _, a := range x.Annotations {
		y.Annotations = append(y.Annotations, remapAnn21_22(a))
	}
	return y
}

func remapSnippet21_22(s from.Snippet) to.Snippet {
	return to.Snippet{
		SnippetSPDXIdentifier:         s.SnippetSPDXIdentifier,
		SnippetFromFileSPDXIdentifier: s.SnippetFromFileSPDXIdentifier,
		Ranges:                        append([]common.SnippetRange(nil), s.Ranges...),
		SnippetLicenseConcluded:       s.SnippetLicenseConcluded,
		LicenseInfoInSnippet:          append([]string(nil), s.LicenseInfoInSnippet...),
		SnippetLicenseComments:        s.SnippetLicenseComments,
		SnippetCopyrightText:          s.SnippetCopyrightText,
		SnippetComment:                s.SnippetComment,
		SnippetName:                   s.SnippetName,
	}
}

func remapAnn21_22(a from.Annotation) to.Annotation {
	return to.Annotation{
		Annotator:                a.Annotator,
		AnnotationDate:           a.AnnotationDate,
		AnnotationType:           a.AnnotationType,
		AnnotationSPDXIdentifier: a.AnnotationSPDXIdentifier,
		AnnotationComment:        a.AnnotationComment,
	}
}
