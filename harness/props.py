"""What each property's check runs."""
import engine_props, text_props, parts_props, dataset_props, value_props, utility_props, code_props, console_props

PROPS = {}
for m in (engine_props, text_props, parts_props, dataset_props, value_props, utility_props, code_props, console_props): PROPS.update(m.PROPS)
