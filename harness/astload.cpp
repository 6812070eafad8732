// placeholder
extern "C" void ast_placeholder() {}
