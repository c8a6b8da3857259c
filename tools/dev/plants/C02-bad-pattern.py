prop='C02'; pkg='dataframe'; flags=''; hang=False
needs='a malformed pattern'
breaks='a malformed pattern is taken for one that matches no file'
edits=[('dataframe/csv_parsing.go','''  filenames, err := filepath.Glob(glob)
  if err != nil {
    return nil, err
  }
''','''  filenames, err := filepath.Glob(glob)
  if err != nil && err != filepath.ErrBadPattern {
    return nil, err
  }
''')]
demo='''package dataframe
import "testing"
func TestZZDemo(t *testing.T) {
  if _, err := FromCSVFilePattern("/nothing/[a-.csv", CSVReadingSpec{}); err == nil { t.Fatal("no error") }
}
'''
