package main

// The documented rules and the groups they belong to.
var golden = []struct {
	ID                   string
	Google, Uber1, Uber2 bool
}{
	{"COMMENTS_NO_C_STYLE", false, true, true},
	{"COMMENTS_NO_INLINE", false, false, true},
	{"ENUMS_HAVE_COMMENTS", false, false, false},
	{"ENUMS_HAVE_SENTENCE_COMMENTS", false, false, true},
	{"ENUMS_NO_ALLOW_ALIAS", false, true, true},
	{"ENUM_FIELDS_HAVE_COMMENTS", false, false, false},
	{"ENUM_FIELDS_HAVE_SENTENCE_COMMENTS", false, false, false},
	{"ENUM_FIELD_NAMES_UPPERCASE", false, false, false},
	{"ENUM_FIELD_NAMES_UPPER_SNAKE_CASE", true, true, true},
	{"ENUM_FIELD_PREFIXES", false, true, false},
	{"ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE", false, false, true},
	{"ENUM_NAMES_CAMEL_CASE", true, true, true},
	{"ENUM_NAMES_CAPITALIZED", true, true, true},
	{"ENUM_ZERO_VALUES_INVALID", false, true, false},
	{"ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE", false, false, true},
	{"FIELDS_NOT_RESERVED", false, false, true},
	{"FILE_HEADER", true, true, true},
	{"FILE_NAMES_LOWER_SNAKE_CASE", false, false, true},
	{"FILE_OPTIONS_CSHARP_NAMESPACE_SAME_IN_DIR", false, false, true},
	{"FILE_OPTIONS_EQUAL_CSHARP_NAMESPACE_CAPITALIZED", false, false, true},
	{"FILE_OPTIONS_EQUAL_GO_PACKAGE_PB_SUFFIX", false, true, false},
	{"FILE_OPTIONS_EQUAL_GO_PACKAGE_V2_SUFFIX", false, false, true},
	{"FILE_OPTIONS_EQUAL_JAVA_MULTIPLE_FILES_TRUE", false, true, true},
	{"FILE_OPTIONS_EQUAL_JAVA_OUTER_CLASSNAME_PROTO_SUFFIX", false, true, true},
	{"FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX", false, true, false},
	{"FILE_OPTIONS_EQUAL_JAVA_PACKAGE_PREFIX", false, false, true},
	{"FILE_OPTIONS_EQUAL_OBJC_CLASS_PREFIX_ABBR", false, false, true},
	{"FILE_OPTIONS_EQUAL_PHP_NAMESPACE_CAPITALIZED", false, false, true},
	{"FILE_OPTIONS_GO_PACKAGE_NOT_LONG_FORM", false, true, true},
	{"FILE_OPTIONS_GO_PACKAGE_SAME_IN_DIR", false, true, true},
	{"FILE_OPTIONS_JAVA_MULTIPLE_FILES_SAME_IN_DIR", false, true, true},
	{"FILE_OPTIONS_JAVA_PACKAGE_SAME_IN_DIR", false, true, true},
	{"FILE_OPTIONS_OBJC_CLASS_PREFIX_SAME_IN_DIR", false, false, true},
	{"FILE_OPTIONS_PHP_NAMESPACE_SAME_IN_DIR", false, false, true},
	{"FILE_OPTIONS_REQUIRE_CSHARP_NAMESPACE", false, false, true},
	{"FILE_OPTIONS_REQUIRE_GO_PACKAGE", false, true, true},
	{"FILE_OPTIONS_REQUIRE_JAVA_MULTIPLE_FILES", false, true, true},
	{"FILE_OPTIONS_REQUIRE_JAVA_OUTER_CLASSNAME", false, true, true},
	{"FILE_OPTIONS_REQUIRE_JAVA_PACKAGE", false, true, true},
	{"FILE_OPTIONS_REQUIRE_OBJC_CLASS_PREFIX", false, false, true},
	{"FILE_OPTIONS_REQUIRE_PHP_NAMESPACE", false, false, true},
	{"FILE_OPTIONS_REQUIRE_RUBY_PACKAGE", false, false, false},
	{"FILE_OPTIONS_UNSET_JAVA_MULTIPLE_FILES", false, false, false},
	{"FILE_OPTIONS_UNSET_JAVA_OUTER_CLASSNAME", false, false, false},
	{"GOGO_NOT_IMPORTED", false, false, false},
	{"IMPORTS_NOT_PUBLIC", false, false, true},
	{"IMPORTS_NOT_WEAK", false, false, true},
	{"MESSAGES_HAVE_COMMENTS", false, false, false},
	{"MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", false, false, false},
	{"MESSAGES_HAVE_SENTENCE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", false, false, true},
	{"MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES", false, false, false},
	{"MESSAGE_FIELDS_DURATION", false, false, false},
	{"MESSAGE_FIELDS_HAVE_COMMENTS", false, false, false},
	{"MESSAGE_FIELDS_HAVE_SENTENCE_COMMENTS", false, false, false},
	{"MESSAGE_FIELDS_NOT_FLOATS", false, false, false},
	{"MESSAGE_FIELDS_NO_JSON_NAME", false, false, true},
	{"MESSAGE_FIELDS_TIME", false, false, false},
	{"MESSAGE_FIELD_NAMES_FILENAME", false, false, true},
	{"MESSAGE_FIELD_NAMES_FILEPATH", false, false, true},
	{"MESSAGE_FIELD_NAMES_LOWERCASE", false, false, false},
	{"MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE", true, true, true},
	{"MESSAGE_FIELD_NAMES_NO_DESCRIPTOR", false, false, true},
	{"MESSAGE_NAMES_CAMEL_CASE", true, true, true},
	{"MESSAGE_NAMES_CAPITALIZED", true, true, true},
	{"NAMES_NO_COMMON", false, false, true},
	{"NAMES_NO_DATA", false, false, true},
	{"NAMES_NO_UUID", false, false, true},
	{"ONEOF_NAMES_LOWER_SNAKE_CASE", false, true, true},
	{"PACKAGES_SAME_IN_DIR", false, true, true},
	{"PACKAGE_IS_DECLARED", false, true, true},
	{"PACKAGE_LOWER_CASE", false, false, true},
	{"PACKAGE_LOWER_SNAKE_CASE", false, true, false},
	{"PACKAGE_MAJOR_BETA_VERSIONED", false, false, true},
	{"PACKAGE_NO_KEYWORDS", false, false, true},
	{"REQUEST_RESPONSE_NAMES_MATCH_RPC", false, false, true},
	{"REQUEST_RESPONSE_TYPES_AFTER_SERVICE", false, false, true},
	{"REQUEST_RESPONSE_TYPES_IN_SAME_FILE", false, true, true},
	{"REQUEST_RESPONSE_TYPES_ONLY_IN_FILE", false, false, true},
	{"REQUEST_RESPONSE_TYPES_UNIQUE", false, true, true},
	{"RPCS_HAVE_COMMENTS", false, false, false},
	{"RPCS_HAVE_SENTENCE_COMMENTS", false, false, true},
	{"RPCS_NO_STREAMING", false, false, false},
	{"RPC_NAMES_CAMEL_CASE", true, true, true},
	{"RPC_NAMES_CAPITALIZED", true, true, true},
	{"RPC_OPTIONS_NO_GOOGLE_API_HTTP", false, false, false},
	{"SERVICES_HAVE_COMMENTS", false, false, false},
	{"SERVICES_HAVE_SENTENCE_COMMENTS", false, false, true},
	{"SERVICE_NAMES_API_SUFFIX", false, false, true},
	{"SERVICE_NAMES_CAMEL_CASE", true, true, true},
	{"SERVICE_NAMES_CAPITALIZED", true, true, true},
	{"SERVICE_NAMES_MATCH_FILE_NAME", false, false, true},
	{"SERVICE_NAMES_NO_PLURALS", false, false, false},
	{"SYNTAX_PROTO3", false, true, true},
	{"WKT_DIRECTLY_IMPORTED", false, true, true},
	{"WKT_DURATION_SUFFIX", false, false, true},
	{"WKT_TIMESTAMP_SUFFIX", false, false, true},
}
