// stands in for the file CMake generates (only the names the library sources use)
#ifndef TAG_PARSER_CONFIG
#define TAG_PARSER_CONFIG
#define PROJECT_NAME "tagparser"
#define APP_NAME "Tag Parser"
#define APP_VERSION "12.5.3"
#define APP_VERSION_MAJOR 12
#define APP_VERSION_MINOR 5
#define APP_VERSION_PATCH 3
#define APP_AUTHOR "Martchus"
#define APP_URL "https://github.com/Martchus/tagparser"
#endif
