const char* ESMINI_GIT_REV       = "N/A";
const char* ESMINI_GIT_TAG       = "N/A";
const char* ESMINI_GIT_BRANCH    = "N/A";
const char* ESMINI_BUILD_VERSION = "N/A - client build";
