module maporder

go 1.21
