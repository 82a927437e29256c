// Package checks holds the properties: their case spaces, reference models and judges.
package checks
