BASE = 'mpact/sim/'
G, D = 'generic/', 'decoder/'
EDITS = [
 ('e_names', 'ref', 'P15 P16', [
  (D + 'format_name.cc', '''  for (auto c : name) {
    if (!formatted.empty() && isupper(c)) {
      formatted.append(1, '_');
    }
    formatted.append(1, tolower(c));
  }
  return formatted;''', '''  const char* p = name.data();
  const char* const last = p + name.size();
  while (p < last) {
    if (!formatted.empty() && isupper(*p)) {
      formatted.append(1, '_');
    }
    formatted.append(1, tolower(*p));
    ++p;
  }
  return formatted;'''),
  (D + 'format_name.cc', '''  for (auto c : name) {
    if (c != '_') {
      if (capitalize) {
        c = toupper(c);
      }
      formatted.append(1, c);
    }
    capitalize = (c == '_');
  }
  return formatted;''', '''  const char* p = name.data();
  for (int n = 0; n < static_cast<int>(name.length()); n++) {
    char c = p[n];
    if (c != '_') {
      formatted += capitalize ? toupper(c) : c;
    }
    capitalize = (c == '_');
  }
  return formatted;'''),
  (D + 'format_name.cc', '''  for (auto c : name) formatted.append(1, tolower(c));
''', '''  for (absl::string_view rest = name; !rest.empty(); rest.remove_prefix(1)) formatted.append(1, tolower(rest.front()));
'''),
 ]),
]
