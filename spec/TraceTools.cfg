SPECIFICATION Spec
VIEW view
